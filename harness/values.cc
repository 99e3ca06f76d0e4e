// Objects as values (C32): histories of making, copying, assigning, moving and asking.
#include <config.h>
#include <bitset>
#include <map>
#include <memory>
#include <optional>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/generalvertexorder.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/quadraturerules/compositequadraturerule.hh>
#include <dune/geometry/refinement.hh>
#include <dune/geometry/virtualrefinement.hh>
#include "geo.hh"
#include "geo_poly.hh"

using namespace geo;
using Nums = std::vector<double>;
using Step = std::array<int, 3>;
using Steps = std::vector<Step>;

template<class V> void add(Nums& r, const V& v, int n) { for (int i = 0; i < n; ++i) r.push_back(double(v[i])); }
template<class M> void addm(Nums& r, const M& m, int rows, int cols) { for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) r.push_back(double(m[i][j])); }
template<class K, int n> void addm(Nums& r, const Dune::DiagonalMatrix<K, n>& m, int rows, int cols)
{ for (int i = 0; i < rows; ++i) r.push_back(double(m.diagonal(i))); }

// questions to a geometry
template<class G>
Nums askGeo(const G& g, int q)
{
  constexpr int m = G::mydimension, c = G::coorddimension;
  Nums r;
  Dune::FieldVector<typename G::ctype, m> x(0.25);
  switch (q) {
  case 1: r.push_back(g.affine()); break;
  case 2: r.push_back(g.integrationElement(x)); addm(r, g.jacobianInverseTransposed(x), c, m); addm(r, g.jacobianInverse(x), m, c); break;
  case 3: add(r, g.local(g.global(x)), m); add(r, g.global(x), c); break;
  case 4: addm(r, g.jacobianTransposed(x), m, c); addm(r, g.jacobian(x), c, m); break;
  case 5: for (int k = 0; k < g.corners(); ++k) add(r, g.corner(k), c); r.push_back(g.corners()); break;
  case 6: add(r, g.center(), c); r.push_back(g.volume()); break;
  case 7: r.push_back(g.type().id() | 1u); r.push_back(referenceElement(g).size(0)); r.push_back(referenceElement(g).size(m)); break;
  }
  return r;
}
const int geoQ = 7;

template<class R>
Nums askRule(const R& rule, int q)
{
  Nums r;
  switch (q) {
  case 1: r = {double(rule.size()), double(rule.order()), double(rule.type().id() | 1u), double(rule.type().dim())}; break;
  case 2: for (auto& p : rule) add(r, p.position(), R::d); break;
  case 3: for (auto& p : rule) r.push_back(p.weight()); break;
  }
  return r;
}

template<class T, class Make, class Ask>
void replay(Trace& tr, const char* name, const std::vector<Steps>& all, unsigned share, unsigned offset, int questions, Make make, Ask ask)
{
  std::map<std::string, int> seen;
  std::vector<std::string> vecs;
  auto intern = [&](const Nums& v) {
    const std::string s = rec::nums(v);
    auto it = seen.find(s);
    if (it != seen.end()) return it->second;
    vecs.push_back(s);
    return seen[s] = int(vecs.size());
  };
  // what a fresh object answers to its first question
  std::vector<std::string> fresh;
  for (int v = 1; v <= 3; ++v) {
    std::vector<int> f;
    for (int q = 1; q <= questions; ++q) { auto o = std::make_unique<T>(make(v)); f.push_back(intern(ask(*o, q))); }
    fresh.push_back(rec::ints(f));
  }
  std::vector<std::string> hist;
  auto flush = [&] {
    if (hist.empty()) return;
    tr.put(Event("values").str("kind", name).raw("vecs", rec::list(vecs)).raw("fresh", rec::list(fresh)).raw("hist", rec::list(hist)));
    hist.clear();
  };
  for (std::size_t h = offset % share; h < all.size(); h += share) {
    // every object has a place of its own, so that a use after its end is seen
    std::unique_ptr<T> reg[3];
    bool live[3] = {false, true, true};
    reg[1] = std::make_unique<T>(make(1));
    reg[2] = std::make_unique<T>(make(2));
    std::vector<std::string> steps;
    std::vector<int> answers;
    for (auto& s : all[h]) {
      int a = 0;
      const int r = s[1], o = s[2];
      switch (s[0]) {
      case 0: reg[r] = std::make_unique<T>(make(o)); live[r] = true; break;
      case 1: *reg[r] = make(o); live[r] = true; break;
      case 2: reg[r] = std::make_unique<T>(std::as_const(*reg[o])); live[r] = true; break;
      case 3: *reg[r] = std::as_const(*reg[o]); live[r] = true; break;
      case 4: reg[r] = std::make_unique<T>(std::move(*reg[o])); live[r] = true; live[o] = false; break;
      case 5: *reg[r] = std::move(*reg[o]); live[r] = true; live[o] = false; break;
      case 6: { using std::swap; swap(*reg[r], *reg[o]); break; }
      case 7: a = intern(ask(std::as_const(*reg[r]), o)); break;
      case 8: reg[r].reset(); live[r] = false; break;
      }
      steps.push_back(rec::ints(s));
      answers.push_back(a);
    }
    std::vector<std::string> end;
    for (int r : {1, 2}) {
      std::vector<int> f;
      if (live[r]) for (int q = 1; q <= questions; ++q) f.push_back(intern(ask(std::as_const(*reg[r]), q)));
      end.push_back(rec::ints(f));
    }
    hist.push_back("[" + rec::list(steps) + "," + rec::ints(answers) + "," + rec::list(end) + "]");
    if (hist.size() == 200) flush();
  }
  flush();
}

template<int c>
std::vector<Dune::FieldVector<double, c>> cornersOf(const Points& p) { std::vector<Dune::FieldVector<double, c>> r; for (auto& x : p) r.push_back(point<c, double>(x, 4)); return r; }

template<class G, int m, int c>
G mlOf(int v)
{
  const unsigned id = m == 2 ? (v == 2 ? 0 : 3) : (v == 1 ? 5 : v == 2 ? 3 : 7);
  Rng rng(v * 77 + m);
  Ints org(c, v);
  return G(GeometryType(id, m), cornersOf<c>(image<m, c>(refCorners<m>(id), frame<m, c>(rng, 12, 1), org, v == 1 ? 1 : 0, rng)));
}

int main(int argc, char** argv)
{
  rec::Options o = rec::options(argc, argv);
  Trace tr(o.out + "/trace.ndjson");
  std::ifstream in(o.out + "/histories.txt");
  if (!in) return 3;
  std::vector<Steps> all;
  std::string line;
  while (std::getline(in, line)) {
    Steps steps;
    std::vector<int> cur;
    std::string n;
    auto flush = [&] { if (!n.empty()) { cur.push_back(std::atoi(n.c_str())); n.clear(); } };
    for (char ch : line) {
      if (ch == '-' || (ch >= '0' && ch <= '9')) n += ch;
      else flush();
      if (ch == ']' && cur.size() == 3) { steps.push_back({cur[0], cur[1], cur[2]}); cur.clear(); }
    }
    all.push_back(steps);
  }
  const unsigned share = o.thorough ? 9 : 3;
  unsigned k = o.seed;

  using Aff = Dune::AffineGeometry<double, 2, 3>;
  replay<Aff>(tr, "AffineGeometry", all, share, k++, geoQ, [](int v) {
    Dune::FieldMatrix<double, 2, 3> jt{{1.0 + v, 0.5, 0}, {0, 2, -1.0 * v}};
    return Aff(v == 2 ? Dune::GeometryTypes::triangle : Dune::GeometryTypes::quadrilateral, Dune::FieldVector<double, 3>(v), jt);
  }, askGeo<Aff>);
  using Aff3 = Dune::AffineGeometry<double, 3, 3>;
  replay<Aff3>(tr, "AffineGeometry", all, share, k++, geoQ, [](int v) {
    std::vector<Dune::FieldVector<double, 3>> c{{0, 0, 0}, {2.0 * v, 0, 1}, {0, 4, 0}, {1, 0, 3.0 + v}};
    return Aff3(Dune::GeometryTypes::tetrahedron, c);
  }, askGeo<Aff3>);

  using Box = Dune::AxisAlignedCubeGeometry<double, 2, 3>;
  replay<Box>(tr, "AxisAlignedCubeGeometry", all, share, k++, geoQ, [](int v) {
    const std::bitset<3> axes(v == 1 ? 3 : v == 2 ? 5 : 6);
    return Box(Dune::FieldVector<double, 3>{1.0, 2, 3}, Dune::FieldVector<double, 3>{4.0, 7, 9}, axes);
  }, askGeo<Box>);
  using FullBox = Dune::AxisAlignedCubeGeometry<double, 2, 2>;
  replay<FullBox>(tr, "AxisAlignedCubeGeometry", all, share, k++, geoQ, [](int v) {
    return FullBox(Dune::FieldVector<double, 2>{1.0 * v, 2}, Dune::FieldVector<double, 2>{4.0 * v, 7});
  }, askGeo<FullBox>);

  using ML = Dune::MultiLinearGeometry<double, 2, 3>;
  replay<ML>(tr, "MultiLinearGeometry", all, share, k++, geoQ, mlOf<ML, 2, 3>, askGeo<ML>);
  using ML3 = Dune::MultiLinearGeometry<double, 3, 3>;
  replay<ML3>(tr, "MultiLinearGeometry", all, share, k++, geoQ, mlOf<ML3, 3, 3>, askGeo<ML3>);
  using CML = Dune::CachedMultiLinearGeometry<double, 2, 3>;
  replay<CML>(tr, "CachedMultiLinearGeometry", all, share, k++, geoQ, mlOf<CML, 2, 3>, askGeo<CML>);
  using JIT = ML::JacobianInverseTransposed;
  replay<JIT>(tr, "JacobianInverseTransposed", all, share, k++, 3, [](int v) {
    return mlOf<ML, 2, 3>(v).jacobianInverseTransposed(Dune::FieldVector<double, 2>(0.25));
  }, [](const JIT& j, int q) {
    Nums r;
    if (q == 1) addm(r, j, 3, 2);
    else if (q == 2) r = {double(j.det()), double(j.detInv())};
    else addm(r, j, 3, 2);
    return r;
  });

  using Map = PolyMap<double, 2, 3>;
  using Mapped = Dune::MappedGeometry<Map, Dune::MultiLinearGeometry<double, 2, 2>>;
  replay<Mapped>(tr, "MappedGeometry", all, share, k++, geoQ, [](int v) {
    Rng rng(v * 13 + 1);
    return Mapped(randomMap<double, 2, 3>(rng, v == 2 ? 1 : 2), mlOf<Dune::MultiLinearGeometry<double, 2, 2>, 2, 2>(2 + (v == 3)), v == 2);
  }, askGeo<Mapped>);

  using FE = PolyFE<double, 2>;
  using LFE = Dune::LocalFiniteElementGeometry<FE, 2>;
  replay<LFE>(tr, "LocalFiniteElementGeometry", all, share, k++, geoQ, [](int v) {
    // a bent and an affine square, and an affine triangle
    const FE fe = v == 3 ? simplexFE<double, 2>(1) : cubeFE<double, 2>(1);
    Rng rng(v * 5);
    return LFE(GeometryType(fe.id, 2), fe, cornersOf<2>(image<2, 2>(fe.nodes2, frame<2, 2>(rng, 10, 1), Ints(2, v), v == 1 ? 1 : 0, rng)));
  }, askGeo<LFE>);

  using Sub = typename Dune::ReferenceElements<double, 3>::ReferenceElement::template Codim<1>::Geometry;
  replay<Sub>(tr, "ReferenceElement::Geometry", all, share, k++, geoQ, [](int v) {
    return Dune::ReferenceElements<double, 3>::general(Dune::GeometryTypes::prism).template geometry<1>(v == 3 ? 4 : v - 1);
  }, askGeo<Sub>);

  using Rule = Dune::QuadratureRule<double, 2>;
  replay<Rule>(tr, "QuadratureRule", all, share, k++, 3, [](int v) {
    return Rule(Dune::QuadratureRules<double, 2>::rule(v == 3 ? Dune::GeometryTypes::triangle : Dune::GeometryTypes::quadrilateral, 2 * v - 1));
  }, askRule<Rule>);
  using Comp = Dune::CompositeQuadratureRule<double, 2>;
  replay<Comp>(tr, "CompositeQuadratureRule", all, share, k++, 3, [](int v) {
    return Comp(Dune::QuadratureRules<double, 2>::rule(Dune::GeometryTypes::triangle, v), Dune::refinementIntervals(v == 2 ? 3 : 2));
  }, askRule<Comp>);

  using Order = Dune::GeneralVertexOrder<2, unsigned>;
  replay<Order>(tr, "GeneralVertexOrder", all, share, k++, 3, [](int v) {
    const unsigned ids[3][4] = {{3, 1, 7, 5}, {9, 2, 4, 1}, {1, 2, 3, 0}};
    return Order(v == 3 ? Dune::GeometryTypes::triangle : Dune::GeometryTypes::quadrilateral, ids[v - 1] + 0, ids[v - 1] + (v == 3 ? 3 : 4));
  }, [](const Order& x, int q) {
    Nums r;
    if (q == 1) for (auto it = x.begin(0, 0); it != x.end(0, 0); ++it) r.push_back(*it);
    else if (q == 2) for (int i = 0; i < 3; ++i) for (auto it = x.begin(1, i); it != x.end(1, i); ++it) r.push_back(*it);
    else { std::vector<unsigned> s; x.getReduced(0, 0, s); for (auto y : s) r.push_back(y); r.push_back(x.type().id() | 1u); }
    return r;
  });

  using Ref = Dune::StaticRefinement<0, double, 0, 2>;
  using EIt = Ref::ElementIterator;
  replay<EIt>(tr, "Refinement::ElementIterator", all, share, k++, 3, [](int v) {
    auto it = Ref::eBegin(Dune::refinementIntervals(v == 3 ? 4 : 3));
    for (int i = 0; i < 2 * v; ++i) ++it;
    return it;
  }, [](const EIt& x, int q) {
    Nums r;
    if (q == 1) r.push_back(x.index());
    else if (q == 2) add(r, x.coords(), 2);
    else for (auto i : x.vertexIndices()) r.push_back(i);
    return r;
  });
  using VIt = Ref::VertexIterator;
  replay<VIt>(tr, "Refinement::VertexIterator", all, share, k++, 3, [](int v) {
    auto it = Ref::vBegin(Dune::refinementIntervals(v == 3 ? 4 : 3));
    for (int i = 0; i < 2 * v; ++i) ++it;
    return it;
  }, [](const VIt& x, int q) {
    Nums r;
    if (q == 1) r.push_back(x.index());
    else if (q == 2) add(r, x.coords(), 2);
    else { VIt y(x); ++y; add(r, y.coords(), 2); }
    return r;
  });
  return 0;
}

// Records the answers of the geometry type classes: values (C01), indices (C02), vertex counts (C24).
#include <config.h>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/type.hh>
#include <dune/geometry/typeindex.hh>
#include <dune/geometry/utility/typefromvertexcount.hh>
#include "rec.hh"

using Dune::GeometryType;
namespace GT = Dune::GeometryTypes;
using namespace rec;

static std::string raw(const GeometryType& t)
{
  return "[" + integer(t.dim()) + "," + integer(t.id()) + "," + boolean(t.isNone()) + "]";
}

template<GeometryType::Id gid>
struct Static { static constexpr GeometryType gt = gid; };

static void describe(Trace& tr, const std::string& how, const std::vector<int>& args, const GeometryType& t)
{
  std::ostringstream text;
  text << t;
  std::vector<std::string> con, pri;
  for (int s = 0; s < int(t.dim()); ++s) {
    con.push_back(boolean(t.isConical(s)));
    pri.push_back(boolean(t.isPrismatic(s)));
  }
  GeometryType back(t.toId());
  GeometryType back2 = GeometryType(static_cast<GeometryType::Id>(t));
  GeometryType copy(t), assigned;
  assigned = t;
  Event e("make");
  e.str("how", how).ints("args", args).raw("t", raw(t))
   .b("vertex", t.isVertex()).b("line", t.isLine()).b("triangle", t.isTriangle()).b("quadrilateral", t.isQuadrilateral())
   .b("tetrahedron", t.isTetrahedron()).b("pyramid", t.isPyramid()).b("prism", t.isPrism()).b("hexahedron", t.isHexahedron())
   .b("simplex", t.isSimplex()).b("cube", t.isCube()).b("none", t.isNone())
   .raw("conical", list(con)).raw("prismatic", list(pri)).str("text", text.str())
   .raw("back", list({raw(back), raw(back2), raw(copy), raw(assigned)}));
  if (t.dim() > 0) e.b("lastconical", t.isConical()).b("lastprismatic", t.isPrismatic());
  else e.b("lastconical", true).b("lastprismatic", true);
  tr.put(e);
}

template<int dim, unsigned id>
void staticIds(Trace& tr)
{
  constexpr GeometryType t(id, dim);
  constexpr GeometryType s = Static<t.toId()>::gt;
  describe(tr, "static", {dim, int(id)}, s);
  constexpr GeometryType sc = Static<GT::conicalExtension(t).toId()>::gt;
  describe(tr, "staticconical", {dim, int(id)}, sc);
  constexpr GeometryType sp = Static<GT::prismaticExtension(t).toId()>::gt;
  describe(tr, "staticprismatic", {dim, int(id)}, sp);
}

struct TopologyClass { static constexpr unsigned int dimension = 3; static constexpr unsigned int id = 5; };
template<unsigned d, unsigned i> struct Topo { static constexpr unsigned int dimension = d; static constexpr unsigned int id = i; };

static void values(const Options& o)
{
  Trace tr(o.out + "/trace.ndjson");
  const int MAXD = o.thorough ? 6 : 5;
  describe(tr, "default", {}, GeometryType());
  describe(tr, "vertex", {}, GT::vertex);
  describe(tr, "line", {}, GT::line);
  describe(tr, "triangle", {}, GT::triangle);
  describe(tr, "quadrilateral", {}, GT::quadrilateral);
  describe(tr, "tetrahedron", {}, GT::tetrahedron);
  describe(tr, "pyramid", {}, GT::pyramid);
  describe(tr, "prism", {}, GT::prism);
  describe(tr, "hexahedron", {}, GT::hexahedron);
  describe(tr, "class", {3, 5}, GeometryType(TopologyClass{}));
  describe(tr, "class", {3, 3}, GeometryType(Topo<3, 3>{}));
  describe(tr, "class", {2, 3}, GeometryType(Topo<2, 3>{}));
  describe(tr, "class", {4, 10}, GeometryType(Topo<4, 10>{}));
  std::vector<GeometryType> all;
  for (int d = 0; d <= 6; ++d) {
    describe(tr, "simplex", {d}, GT::simplex(d));
    describe(tr, "cube", {d}, GT::cube(d));
    describe(tr, "nonetype", {d}, GT::none(d));
    describe(tr, "noneconical", {d}, GT::conicalExtension(GT::none(d)));
    describe(tr, "noneprismatic", {d}, GT::prismaticExtension(GT::none(d)));
  }
  for (int d = 0; d <= MAXD; ++d) {
    for (unsigned id = 0; id < (1u << d); ++id) {
      GeometryType t(id, d);
      all.push_back(t);
      describe(tr, "id", {d, int(id)}, t);
      describe(tr, "id3", {d, int(id)}, GeometryType(id, d, false));
      describe(tr, "conical", {d, int(id)}, GT::conicalExtension(t));
      describe(tr, "prismatic", {d, int(id)}, GT::prismaticExtension(t));
    }
    all.push_back(GT::none(d));
    if (d > 0) { all.push_back(GT::conicalExtension(GT::none(d - 1))); all.push_back(GT::prismaticExtension(GT::none(d - 1))); }
  }
  all.push_back(GeometryType());
  // higher dimensions: one type in each and those that differ from it in a single place
  Rng rnd(o.seed * 31 + 1);
  for (int d = MAXD + 1; d <= 30; ++d) {
    describe(tr, "simplex", {d}, GT::simplex(d));
    describe(tr, "cube", {d}, GT::cube(d));
    describe(tr, "nonetype", {d}, GT::none(d));
    const unsigned first = unsigned(rnd.next() % (1u << d)), bit = unsigned(rnd.next() % d);
    for (unsigned id : {first, first ^ 1u, first ^ (1u << bit), first ^ (1u << (d - 1)), first ^ 2u}) {
      GeometryType t(id, d);
      describe(tr, "id", {d, int(id)}, t);
      if (d < 30) {
        describe(tr, "conical", {d, int(id)}, GT::conicalExtension(t));
        describe(tr, "prismatic", {d, int(id)}, GT::prismaticExtension(t));
      }
      if (o.thorough || d % 3 == 0) all.push_back(t);
    }
    if (o.thorough || d % 3 == 0) { all.push_back(GT::none(d)); all.push_back(GeometryType(first % (1u << (d - 1)), d - 1)); }
  }
  forEachStatic(std::make_index_sequence<5>{}, [&](auto d) {
    constexpr int dim = int(decltype(d)::value);
    forEachStatic(std::make_index_sequence<(1u << dim)>{}, [&](auto i) {
      staticIds<dim, unsigned(decltype(i)::value)>(tr);
    });
  });
  // all pairs
  Trace tp(o.out + "/pairs.ndjson");
  std::vector<std::string> types, eq, ne, lt;
  for (auto& a : all) {
    types.push_back(raw(a));
    std::vector<std::string> re, rn, rl;
    for (auto& b : all) { re.push_back(boolean(a == b)); rn.push_back(boolean(a != b)); rl.push_back(boolean(a < b)); }
    eq.push_back(list(re)); ne.push_back(list(rn)); lt.push_back(list(rl));
  }
  tp.put(Event("pairs").raw("types", list(types)).raw("eq", list(eq)).raw("ne", list(ne)).raw("lt", list(lt)));
}

template<int dim>
void dispatch(Trace& tr)
{
  for (unsigned id = 0; id < (1u << dim); ++id) {
    GeometryType t(id, dim);
    GeometryType got = Dune::Impl::toGeometryTypeIdConstant<dim>(t, [&](auto gid) { return GeometryType(decltype(gid)::value); });
    tr.put(Event("dispatch").raw("t", raw(t)).raw("got", raw(got)));
  }
}

static void indices(const Options& o)
{
  using L = Dune::LocalGeometryTypeIndex;
  using G = Dune::GlobalGeometryTypeIndex;
  Trace tr(o.out + "/trace.ndjson");
  for (int d = 0; d <= 24; ++d)
    tr.put(Event("sizes").i("dim", d).i("local", L::size(d)).i("offset", G::offset(d)).i("global", G::size(d)));
  for (int d = 0; d <= 6; ++d) {
    for (unsigned id = 0; id < (1u << d); ++id) {
      GeometryType t(id, d);
      tr.put(Event("index").raw("t", raw(t)).i("local", L::index(t)).i("global", G::index(t)));
    }
    GeometryType n = GT::none(d);
    tr.put(Event("index").raw("t", raw(n)).i("local", L::index(n)).i("global", G::index(n)));
    if (d > 0) {
      GeometryType n2 = GT::prismaticExtension(GT::none(d - 1));
      tr.put(Event("index").raw("t", raw(n2)).i("local", L::index(n2)).i("global", G::index(n2)));
    }
    for (std::size_t k = 0; k < L::size(d); ++k)
      tr.put(Event("typeof").i("dim", d).i("k", k).raw("t", raw(L::type(d, k))));
  }
  Rng rnd(o.seed * 31 + 2);
  for (int d = 7; d <= 24; ++d) {
    std::vector<unsigned> ids = {0u, 1u, (1u << (d - 1)), (1u << d) - 1u, (1u << d) - 2u};
    for (int k = 0; k < (o.thorough ? 20 : 5); ++k) ids.push_back(unsigned(rnd.next() % (1u << d)));
    for (unsigned id : ids) {
      GeometryType t(id, d);
      tr.put(Event("index").raw("t", raw(t)).i("local", L::index(t)).i("global", G::index(t)));
      tr.put(Event("typeof").i("dim", d).i("k", id / 2).raw("t", raw(L::type(d, id / 2))));
    }
    GeometryType n = GT::none(d);
    tr.put(Event("index").raw("t", raw(n)).i("local", L::index(n)).i("global", G::index(n)));
    tr.put(Event("typeof").i("dim", d).i("k", L::size(d) - 1).raw("t", raw(L::type(d, L::size(d) - 1))));
  }
  forEachStatic(std::make_index_sequence<6>{}, [&](auto d) { dispatch<int(decltype(d)::value)>(tr); });
  // all together: is it a bijection
  Trace ta(o.out + "/all.ndjson");
  for (int d = 0; d <= 6; ++d) {
    std::vector<int> loc, glo;
    for (int e = 0; e <= d; ++e)
      for (unsigned id = 0; id < (1u << e); id += 2) { glo.push_back(int(G::index(GeometryType(id, e)))); if (e == d) loc.push_back(int(L::index(GeometryType(id, e)))); }
    for (int e = 0; e <= d; ++e) glo.push_back(int(G::index(GT::none(e))));
    loc.push_back(int(L::index(GT::none(d))));
    ta.put(Event("all").i("dim", d).ints("local", loc).ints("global", glo).i("lsize", L::size(d)).i("gsize", G::size(d)));
  }
}

template<int dim>
int refVertices(const GeometryType& t) { return Dune::ReferenceElements<double, dim>::general(t).size(dim); }

static void counts(const Options& o)
{
  Trace tr(o.out + "/trace.ndjson");
  std::vector<unsigned> ns, ds;
  for (unsigned n = 0; n <= (o.thorough ? 1100u : 140u); ++n) ns.push_back(n);
  // counts and dimensions that look like small ones when they are cut off somewhere
  for (unsigned bit = 7; bit < 32; ++bit)
    for (unsigned n = 0; n <= 9; ++n) ns.push_back((1u << bit) + n);
  for (unsigned n = 1; n <= 9; ++n) ns.push_back(0u - n);
  for (unsigned d = 0; d <= 12; ++d) ds.push_back(d);
  for (unsigned bit = 4; bit < 32; ++bit)
    for (unsigned d = 0; d <= 4; ++d) ds.push_back((1u << bit) + d);
  for (unsigned d : ds)
    for (unsigned n : ns) {
      if (d > 6 && n > 140 && !o.thorough) continue;
      Event e("count");
      e.i("dim", std::min(d, 2000000000u)).i("n", std::min(n, 2000000000u));
      try {
        GeometryType t = Dune::geometryTypeFromVertexCount(d, n);
        int v = t.isNone() || t.dim() > 3 ? -1 : t.dim() == 0 ? refVertices<0>(t) : t.dim() == 1 ? refVertices<1>(t) : t.dim() == 2 ? refVertices<2>(t) : refVertices<3>(t);
        e.str("outcome", "type").raw("t", raw(t)).i("v", v);
      } catch (const Dune::Exception&) { e.str("outcome", "refused"); }
      catch (...) { e.str("outcome", "other"); }
      tr.put(e);
    }
}

int main(int argc, char** argv)
{
  Options o = options(argc, argv);
  const std::string part = argc > 4 ? argv[4] : "";
  if (part == "C01") values(o);
  else if (part == "C02") indices(o);
  else if (part == "C24") counts(o);
  else return 3;
  return 0;
}

// Refinement of reference elements: numbering and coordinates (C18), sub-elements (C19),
// the run-time interface and its iterators (C20), composite quadrature rules (C17).
#include <config.h>
#include <array>
#include <map>
#include <memory>
#include <dune/common/exceptions.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/quadraturerules/compositequadraturerule.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/refinement.hh>
#include <dune/geometry/virtualrefinement.hh>
#include "rec.hh"
#include "moments.hh"
using namespace rec;
using Dune::GeometryType;
namespace QT = Dune::QuadratureType;

template<class G>
std::string cornersOf(const G& g)
{
  std::vector<std::string> r;
  for (int i = 0; i < g.corners(); ++i) r.push_back(nums(g.corner(i), G::coorddimension));
  return list(r);
}

// how the iterators are reached: by the number of intervals or by levels
inline Dune::RefinementIntervals tag(int n, bool levels)
{
  if (levels) { int l = 0; while ((1 << l) < n) ++l; return Dune::refinementLevels(l); }
  return Dune::refinementIntervals(n);
}

template<unsigned id, class ct, unsigned to, int d>
void statically(Trace& tr, const char* op, int n, bool levels)
{
  using R = Dune::StaticRefinement<id, ct, to, d>;
  const auto t = tag(n, levels);
  Event e(op);
  e.str("ct", ctName<ct>()).i("m", d).i("id", id).i("to", to).i("n", n).i("nv", R::nVertices(t)).i("ne", R::nElements(t));
  const int limit = 100000;
  std::vector<std::string> vs, es;
  for (auto it = R::vBegin(t); it != R::vEnd(t) && int(vs.size()) < limit; ++it)
    vs.push_back("[" + integer(it.index()) + "," + nums(it.coords(), d) + "," + cornersOf(it.geometry()) + "]");
  for (auto it = R::eBegin(t); it != R::eEnd(t) && int(es.size()) < limit; ++it) {
    const auto g = it.geometry();
    es.push_back("[" + integer(it.index()) + "," + rec::ints(it.vertexIndices()) + "," + nums(it.coords(), d) + "," + cornersOf(g) + ","
                 + integer(g.type().isNone() ? -1 : int(g.type().id())) + "," + nums(g.center(), d) + "," + num(g.volume()) + "]");
  }
  e.raw("v", list(vs)).raw("e", list(es));
  tr.put(e);
}

// many intervals: the numbers walked over, some of the sub-elements with the vertices they name,
// and for some points all sub-elements that have them
template<unsigned id, class ct, unsigned to, int d>
void far(Trace& tr, const char* op, int n, Rng& rng)
{
  using R = Dune::StaticRefinement<id, ct, to, d>;
  const auto t = Dune::refinementIntervals(n);
  const int scale = 9973, ne = R::nElements(t), limit = 400000;
  const auto ref = Dune::ReferenceElements<ct, d>::general(GeometryType(id, d));
  Event e(op);
  e.str("ct", ctName<ct>()).i("m", d).i("id", id).i("to", to).i("n", n).i("nv", R::nVertices(t)).i("ne", ne).i("scale", scale);
  // points between the lattice points
  std::vector<std::vector<int>> pts;
  while (pts.size() < 12) {
    std::vector<int> p(d);
    Dune::FieldVector<ct, d> x;
    for (int i = 0; i < d; ++i) { p[i] = rng.in(0, n * scale - 1); x[i] = p[i] / ct(n * scale); }
    // no small integer combination is a multiple of the lattice width
    bool fine = true;
    for (int k = 0; k < (d == 1 ? 5 : d == 2 ? 25 : d == 3 ? 125 : 625); ++k) {
      int sum = 0, any = 0;
      for (int i = 0, r = k; i < d; ++i, r /= 5) { sum += (r % 5 - 2) * p[i]; any |= r % 5 - 2; }
      fine = fine && (!any || sum % scale);
    }
    if (fine && ref.checkInside(x)) pts.push_back(p);
  }
  std::vector<std::vector<int>> found(pts.size());
  std::vector<char> take(std::max(1, std::min(ne, limit)), 0);
  take.front() = take.back() = 1;
  for (int k = 0; k < 60; ++k) take[rng.in(0, int(take.size()) - 1)] = 1;
  std::map<int, std::string> named;
  std::vector<std::string> es, vs, ps;
  int walked = 0, odd = -1;
  for (auto it = R::eBegin(t); it != R::eEnd(t) && walked < limit; ++it, ++walked) {
    if (odd < 0 && it.index() != walked) odd = walked;
    const auto g = it.geometry();
    bool has = false;
    for (std::size_t k = 0; k < pts.size(); ++k) {
      Dune::FieldVector<ct, d> x;
      for (int i = 0; i < d; ++i) x[i] = pts[k][i] / ct(n * scale);
      if ((g.center() - x).infinity_norm() < ct(1.5) / n && referenceElement(g).checkInside(g.local(x))) { found[k].push_back(walked); has = true; }
    }
    if (has || (walked < int(take.size()) && take[walked])) {
      for (auto v : it.vertexIndices()) named[v];
      es.push_back("[" + integer(walked) + "," + integer(it.index()) + "," + rec::ints(it.vertexIndices()) + "," + nums(it.coords(), d) + "," + cornersOf(g) + ","
                   + integer(g.type().isNone() ? -1 : int(g.type().id())) + "," + nums(g.center(), d) + "," + num(g.volume()) + "]");
    }
  }
  e.i("we", walked).i("odde", odd);
  walked = 0, odd = -1;
  for (auto it = R::vBegin(t); it != R::vEnd(t) && walked < limit; ++it, ++walked) {
    if (odd < 0 && it.index() != walked) odd = walked;
    if (named.count(walked)) vs.push_back("[" + integer(walked) + "," + nums(it.coords(), d) + "," + cornersOf(it.geometry()) + "]");
  }
  e.i("wv", walked).i("oddv", odd);
  for (std::size_t k = 0; k < pts.size(); ++k) ps.push_back("[" + rec::ints(pts[k]) + "," + rec::ints(found[k]) + "]");
  tr.put(e.raw("v", list(vs)).raw("e", list(es)).raw("p", list(ps)));
}

template<unsigned id, class ct, unsigned to, int d>
void dynamically(Trace& tr, int n, bool levels)
{
  using R = Dune::StaticRefinement<id, ct, to, d>;
  const auto t = tag(n, levels);
  const auto& r = Dune::buildRefinement<d, ct>(GeometryType(id, d), GeometryType(to, d));
  Event e("runtime");
  e.str("ct", ctName<ct>()).i("m", d).i("id", id).i("to", to).i("n", n);
  e.ints("counts", std::vector<int>{r.nVertices(t), r.nElements(t)});
  e.ints("counts2", std::vector<int>{R::nVertices(t), R::nElements(t)});
  std::vector<std::string> vs, es, vs2, es2;
  const std::size_t limit = 100000;
  auto vend = r.vEnd(t);
  for (auto it = r.vBegin(t); it != vend && vs.size() < limit; ++it) vs.push_back("[" + integer(it.index()) + "," + nums(it.coords(), d) + "]");
  auto eend = r.eEnd(t);
  for (auto it = r.eBegin(t); it != eend && es.size() < limit; ++it) es.push_back("[" + integer(it.index()) + "," + rec::ints(it.vertexIndices()) + "," + nums(it.coords(), d) + "]");
  for (auto it = R::vBegin(t); it != R::vEnd(t) && vs2.size() < limit; ++it) vs2.push_back("[" + integer(it.index()) + "," + nums(it.coords(), d) + "]");
  for (auto it = R::eBegin(t); it != R::eEnd(t) && es2.size() < limit; ++it) es2.push_back("[" + integer(it.index()) + "," + rec::ints(it.vertexIndices()) + "," + nums(it.coords(), d) + "]");
  e.raw("v", list(vs)).raw("e", list(es)).raw("v2", list(vs2)).raw("e2", list(es2));
  tr.put(e);
}

// sub-elements of n and of 2n intervals, and those of the shapes the facets can have
template<class ct, unsigned id, unsigned to, int d>
std::string pieces(int n)
{
  using R = Dune::StaticRefinement<id, ct, to, d>;
  const auto t = Dune::refinementIntervals(n);
  std::vector<std::string> es;
  for (auto it = R::eBegin(t); it != R::eEnd(t) && es.size() < 100000; ++it) es.push_back(cornersOf(it.geometry()));
  return list(es);
}
template<unsigned id, class ct, unsigned to, int d>
void fitting(Trace& tr, int n)
{
  Event e("fitting");
  e.str("ct", ctName<ct>()).i("m", d).i("id", id).i("to", to).i("n", n);
  e.raw("coarse", pieces<ct, id, to, d>(n)).raw("fine", pieces<ct, id, to, d>(2 * n));
  std::vector<std::string> fs;
  auto put = [&](unsigned fid, unsigned fto, const std::string& p) { fs.push_back("[" + integer(fid) + "," + integer(fto) + "," + p + "]"); };
  if constexpr (d == 2) { put(0, 0, pieces<ct, 0, 0, 1>(n)); }
  if constexpr (d == 3) { put(0, 0, pieces<ct, 0, 0, 2>(n)); put(3, 0, pieces<ct, 3, 0, 2>(n)); put(3, 3, pieces<ct, 3, 3, 2>(n)); }
  if constexpr (d == 4) { put(0, 0, pieces<ct, 0, 0, 3>(n)); put(7, 0, pieces<ct, 7, 0, 3>(n)); put(7, 7, pieces<ct, 7, 7, 3>(n)); }
  tr.put(e.raw("facets", list(fs)));
}

// every refinement there is
template<class ct, int maxd, class F>
void everyRefinement(F&& f)
{
  auto go = [&](auto id, auto to, auto d) { f.template operator()<unsigned(decltype(id)::value), ct, unsigned(decltype(to)::value), int(decltype(d)::value)>(); };
#define GO(ID, TO, D) if constexpr (D <= maxd) go(std::integral_constant<unsigned, ID>(), std::integral_constant<unsigned, TO>(), std::integral_constant<int, D>())
  GO(0, 0, 1); GO(1, 1, 1); GO(1, 0, 1); GO(0, 1, 1);
  GO(0, 0, 2); GO(1, 1, 2); GO(2, 0, 2); GO(3, 1, 2); GO(2, 2, 2); GO(3, 3, 2); GO(3, 0, 2); GO(2, 3, 2);
  GO(0, 0, 3); GO(1, 0, 3); GO(6, 0, 3); GO(7, 1, 3); GO(6, 6, 3); GO(7, 7, 3); GO(4, 0, 3); GO(5, 1, 3); GO(2, 0, 3); GO(3, 1, 3);
  GO(0, 0, 4); GO(15, 0, 4); GO(15, 15, 4);
#undef GO
}

// ---------------------------------------------------------------- run-time interface

template<class ct, int d>
void builds(Trace& tr)
{
  for (unsigned id = 0; id < (1u << d); ++id)
    for (unsigned to = 0; to < (1u << d); ++to) {
      Event e("build");
      e.str("ct", ctName<ct>()).i("m", d).i("id", id).i("to", to);
      try {
        auto& r = Dune::buildRefinement<d, ct>(GeometryType(id, d), GeometryType(to, d));
        e.str("out", "refinement").i("nv", r.nVertices(Dune::refinementIntervals(2))).i("ne", r.nElements(Dune::refinementIntervals(2)));
      }
      catch (const Dune::Exception&) { e.str("out", "refused").i("nv", 0).i("ne", 0); }
      tr.put(e);
    }
}

// a machine with registers that hold iterators
//   0 r: r = begin; 1 r: r = end; 2 r s: r = s; 3 r s: r becomes a new copy of s; 4 r: ++r; 5 r s: s = r++
template<class It, class Begin, class End>
void registers(Trace& tr, const std::string& what, int N, int d, const std::vector<int>& steps, int regs, Begin begin, End end)
{
  std::vector<std::string> table;
  {
    auto stop = end();
    for (auto it = begin(); it != stop && table.size() < 100; ++it) table.push_back("[" + integer(it.index()) + "," + nums(it.coords(), d) + "]");
  }
  std::vector<std::unique_ptr<It>> r;
  for (int k = 0; k < regs; ++k) r.push_back(std::make_unique<It>(begin()));
  std::vector<int> at(regs, 0);            // only to know whether an iterator may be read
  std::vector<std::string> obs;
  for (std::size_t i = 0; i + 2 < steps.size(); i += 3) {
    const int op = steps[i], a = steps[i + 1], b = steps[i + 2];
    switch (op) {
    case 0: *r[a] = begin(); at[a] = 0; break;
    case 1: *r[a] = end(); at[a] = N; break;
    case 2: *r[a] = *r[b]; at[a] = at[b]; break;
    case 3: { auto c = std::make_unique<It>(*r[b]); r[a] = std::move(c); at[a] = at[b]; break; }
    case 4: ++*r[a]; ++at[a]; break;
    case 5: { const int old = at[a]; It c = (*r[a])++; ++at[a]; *r[b] = c; at[b] = old; break; }
    }
    std::vector<std::string> o;
    for (int x = 0; x < regs; ++x) {
      std::vector<int> eq;
      for (int y = 0; y < regs; ++y) eq.push_back((*r[x] == *r[y] ? 1 : 0) + (*r[x] != *r[y] ? 2 : 0));
      o.push_back("[" + rec::ints(eq) + "," + (at[x] < N ? "[" + integer(r[x]->index()) + "," + nums(r[x]->coords(), d) + "]" : "[]") + "]");
    }
    obs.push_back(list(o));
  }
  Event e("iterators");
  e.str("what", what).i("regs", regs).i("N", N).ints("steps", steps).raw("table", list(table)).raw("obs", list(obs));
  tr.put(e);
}

template<int d>
void elementsOf(Trace& tr, int N, const std::vector<int>& steps, int regs, unsigned id, unsigned to, int n)
{
  const auto& r = Dune::buildRefinement<d, double>(GeometryType(id, d), GeometryType(to, d));
  const auto t = Dune::refinementIntervals(n);
  using It = typename Dune::VirtualRefinement<d, double>::ElementIterator;
  registers<It>(tr, "elements", N, d, steps, regs, [&] { return r.eBegin(t); }, [&] { return r.eEnd(t); });
}
template<int d>
void verticesOf(Trace& tr, int N, const std::vector<int>& steps, int regs, unsigned id, unsigned to, int n)
{
  const auto& r = Dune::buildRefinement<d, double>(GeometryType(id, d), GeometryType(to, d));
  const auto t = Dune::refinementIntervals(n);
  using It = typename Dune::VirtualRefinement<d, double>::VertexIterator;
  registers<It>(tr, "vertices", N, d, steps, regs, [&] { return r.vBegin(t); }, [&] { return r.vEnd(t); });
}

// iterators of several refinements at all their places, all compared with each other
template<class It, class Begin, class End>
void gather(std::vector<It>& its, std::vector<std::string>& where, unsigned id, unsigned to, int n, Begin begin, End end)
{
  auto it = begin();
  const auto stop = end();
  int k = 0;
  for (; it != stop && k < 2000; ++it, ++k) { its.push_back(it); where.push_back("[" + integer(id) + "," + integer(to) + "," + integer(n) + "," + integer(k) + "]"); }
  its.push_back(it); where.push_back("[" + integer(id) + "," + integer(to) + "," + integer(n) + "," + integer(k) + "]");
  its.push_back(stop); where.push_back("[" + integer(id) + "," + integer(to) + "," + integer(n) + "," + integer(k) + "]");
}
template<int d>
void places(Trace& tr, const std::vector<std::pair<unsigned, unsigned>>& pairs, int maxn)
{
  auto put = [&](const char* what, auto& its, auto& where) {
    std::vector<std::string> rows;
    for (auto& a : its) {
      std::vector<int> eq, noteq;
      for (std::size_t j = 0; j < its.size(); ++j) { if (a == its[j]) eq.push_back(j + 1); if (!(a != its[j])) noteq.push_back(j + 1); }
      rows.push_back("[" + rec::ints(eq) + "," + rec::ints(noteq) + "]");
    }
    Event e("places");
    e.str("what", what).i("m", d).raw("where", list(where)).raw("rows", list(rows));
    tr.put(e);
  };
  using R = Dune::VirtualRefinement<d, double>;
  std::vector<typename R::ElementIterator> es;
  std::vector<typename R::VertexIterator> vs;
  std::vector<std::string> ew, vw;
  for (auto [id, to] : pairs)
    for (int n = 1; n <= maxn; ++n) {
      const auto& r = Dune::buildRefinement<d, double>(GeometryType(id, d), GeometryType(to, d));
      const auto t = Dune::refinementIntervals(n);
      gather(es, ew, id, to, n, [&] { return r.eBegin(t); }, [&] { return r.eEnd(t); });
      gather(vs, vw, id, to, n, [&] { return r.vBegin(t); }, [&] { return r.vEnd(t); });
    }
  put("elements", es, ew);
  put("vertices", vs, vw);
}

void iterators(Trace& tr, const Options& o, const std::string& file)
{
  std::ifstream in(o.out + "/" + file);
  if (!in) { std::perror(file.c_str()); std::exit(3); }
  int count = 0;
  for (std::string line; std::getline(in, line); ++count) {
    std::vector<int> n;
    for (std::size_t i = 0; i < line.size(); )
      if (std::isdigit((unsigned char) line[i])) { std::size_t e; n.push_back(std::stoi(line.substr(i), &e)); i += e; }
      else ++i;
    const int N = n[0], regs = n[1];
    const std::vector<int> steps(n.begin() + 2, n.end());
    if (N == 2)
      switch (count % 4) {
      case 0: elementsOf<1>(tr, 2, steps, regs, 0, 0, 2); break;
      case 1: verticesOf<1>(tr, 2, steps, regs, 0, 0, 1); break;
      case 2: elementsOf<2>(tr, 2, steps, regs, 2, 0, 1); break;
      default: elementsOf<3>(tr, 2, steps, regs, 2, 0, 1); break;
      }
    else
      switch (count % 6) {
      case 0: elementsOf<2>(tr, 4, steps, regs, 0, 0, 2); break;
      case 1: elementsOf<2>(tr, 4, steps, regs, 2, 2, 2); break;
      case 2: verticesOf<2>(tr, 4, steps, regs, 2, 2, 1); break;
      case 3: verticesOf<3>(tr, 4, steps, regs, 0, 0, 1); break;
      case 4: elementsOf<1>(tr, 4, steps, regs, 0, 0, 4); break;
      default: verticesOf<1>(tr, 4, steps, regs, 0, 0, 3); break;
      }
  }
}

// ---------------------------------------------------------------- composite rules

template<class ct, int d>
void composite(Trace& tr, const Options& o, int minn, int maxn, int maxp)
{
  Rng rng(o.seed * 67867967 + d * 10 + sizeof(ct));
  using R = Dune::StaticRefinement<0, ct, 0, d>;
  for (auto qt : {QT::GaussLegendre, QT::GaussJacobi_n_0, QT::GaussLobatto})
    for (unsigned id = 0; id < 2; ++id)
      for (int n = minn; n <= maxn; ++n)
        for (int p = 0; p <= maxp; ++p) {
          if (id && (p + n) % 3) continue;
          const auto& base = Dune::QuadratureRules<ct, d>::rule(GeometryType(id, d), p, qt);
          const auto t = Dune::refinementIntervals(n);
          const Dune::CompositeQuadratureRule<ct, d> rule(base, t);
          Event e("composite");
          e.str("ct", ctName<ct>()).i("m", d).i("id", id).i("qt", d == 1 ? 0 : int(qt)).i("p", p).i("n", n).i("base", base.order()).i("order", rule.order()).i("size", rule.size());
          e.i("tdim", rule.type().dim()).i("tid", rule.type().id()).b("tnone", rule.type().isNone());
          std::vector<std::string> ws, bs, ps, es;
          for (auto& dirs : walks<d>(std::max(0, std::min(base.order(), 60)), 6, rng)) ws.push_back("[" + rec::ints(dirs) + "," + walk(rule, dirs) + "]");
          for (auto& q : base) bs.push_back(nums(q.position(), d));
          std::vector<std::string> bw;
          for (auto& q : base) bw.push_back(num(q.weight()));
          for (auto it = R::eBegin(t); it != R::eEnd(t); ++it) es.push_back(cornersOf(it.geometry()));
          // the points of one sub-element in every few
          const std::size_t nb = base.size(), every = std::max<std::size_t>(1, rule.size() / 160);
          std::vector<int> which;
          for (std::size_t i = 0; i < rule.size(); ++i)
            if (i % every == 0 || i + nb >= rule.size()) { which.push_back(int(i)); ps.push_back("[" + nums(rule[i].position(), d) + "," + num(rule[i].weight()) + "]"); }
          e.raw("walks", list(ws)).raw("basepts", list(bs)).raw("basew", list(bw)).raw("elems", list(es)).ints("which", which).raw("pts", list(ps));
          tr.put(e);
        }
}

int main(int argc, char** argv)
{
  Options o = options(argc, argv);
  const std::string what = argv[4];
  Trace tr(o.out + "/trace.ndjson");
  const int more = o.thorough ? 1 : 0;
  auto top = [&](int d) { return d == 1 ? 12 + 4 * more : d == 2 ? 9 + 5 * more : d == 3 ? 5 + 3 * more : 3 + more; };
  if (what == "C18" || what == "C19") {
    const char* op = what == "C18" ? "numbering" : "tiling";
    auto f = [&]<unsigned id, class ct, unsigned to, int d>() {
      for (int n = 1; n <= top(d); ++n) statically<id, ct, to, d>(tr, op, n, false);
      if (d < 4) for (int n = 1; n <= top(d); n *= 2) statically<id, ct, to, d>(tr, op, n, true);
    };
    everyRefinement<double, 4>(f);
    Rng rng(o.seed * 7919 + 5);
    const char* farop = what == "C18" ? "farnumbering" : "fartiling";
    auto h = [&]<unsigned id, class ct, unsigned to, int d>() {
      // more sub-elements or vertices than 16 bits can number
      constexpr bool same = (id | 1) == (to | 1);
      const int most = d == 1 ? 2000 : d == 2 ? (same ? 260 : 190) : d == 3 ? (same ? 41 : 23) : 6 + more;
      far<id, ct, to, d>(tr, farop, most, rng);
      for (int k = 0; k < 1 + 3 * more; ++k) far<id, ct, to, d>(tr, farop, rng.in(top(d) + 1, most), rng);
    };
    everyRefinement<double, 4>(h);
    auto g = [&]<unsigned id, class ct, unsigned to, int d>() { statically<id, ct, to, d>(tr, op, 3, false); };
    everyRefinement<float, 3>(g);
  }
  else if (what == "C20") {
    auto f = [&]<unsigned id, class ct, unsigned to, int d>() {
      for (int n = 1; n <= std::min(top(d), 4); ++n) dynamically<id, ct, to, d>(tr, n, n == 4);
      const int most = d == 1 ? 300 : d == 2 ? 20 : d == 3 ? 7 : 4;
      dynamically<id, ct, to, d>(tr, most, false);
      if (d < 4) dynamically<id, ct, to, d>(tr, d == 1 ? 256 : d == 2 ? 16 : 8, true);
    };
    everyRefinement<double, 4>(f);
    auto g = [&]<unsigned id, class ct, unsigned to, int d>() { dynamically<id, ct, to, d>(tr, 2, false); };
    everyRefinement<float, 3>(g);
    builds<double, 1>(tr); builds<double, 2>(tr); builds<double, 3>(tr); builds<double, 4>(tr);
    builds<float, 2>(tr); builds<float, 3>(tr);
    places<1>(tr, {{0, 0}, {1, 0}}, 4);
    places<2>(tr, {{0, 0}, {1, 1}, {2, 0}, {3, 3}}, 3);
    places<3>(tr, {{0, 0}, {6, 0}, {7, 7}, {5, 0}, {3, 1}}, 2);
    for (int i = 5; i < argc; ++i) iterators(tr, o, argv[i]);
  }
  else if (what == "C34") {
    auto f = [&]<unsigned id, class ct, unsigned to, int d>() {
      if constexpr (d > 1) for (int n = 1; n <= (d == 2 ? 6 : d == 3 ? 3 : 1) + more; ++n) fitting<id, ct, to, d>(tr, n);
    };
    everyRefinement<double, 4>(f);
  }
  else if (what == "C17") {
    composite<double, 1>(tr, o, 1, 6, 9);
    composite<double, 2>(tr, o, 1, 5, 7);
    composite<double, 3>(tr, o, 1, 4, 6);
    if (o.thorough) composite<double, 4>(tr, o, 1, 2, 4);
    // many intervals
    composite<double, 1>(tr, o, 200, 200, 3);
    composite<double, 2>(tr, o, 12 + int(o.seed % 4), 12 + int(o.seed % 4), 3);
    composite<double, 3>(tr, o, 7, 7, 3);
    composite<float, 2>(tr, o, 1, 2, 4);
  }
  else
    return 3;
  return 0;
}

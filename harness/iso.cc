// Threads that work on objects of their own (C30).
//   schedules FILE...: threads are stopped in the middle of their evaluations, in code the user supplies:
//                      basis functions, maps, corner storages; the given schedules say when they go on
//   free:              threads run without any order, on objects of their own and on common ones
#include <config.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/refinement.hh>
#include <dune/geometry/virtualrefinement.hh>
#include "geo.hh"
#include "geo_poly.hh"

using namespace geo;

// ---------------------------------------------------------------- threads that can be stopped

struct Director
{
  std::mutex m;
  std::condition_variable cv;
  struct Actor
  {
    std::array<int, 3> wanted{-1, 0, 0};
    bool busy = false, atGate = false, token = false;
  };
  std::vector<Actor> actors;
  bool openAll = false, quit = false;
  std::vector<std::string> acts;
};
Director* director = nullptr;
thread_local int me = -1;
thread_local int left_ = 0;      // intermediate results until the stop

void gate()
{
  if (me < 0 || --left_ != 0) return;
  Director& d = *director;
  std::unique_lock<std::mutex> l(d.m);
  auto& a = d.actors[me];
  a.atGate = true;
  d.cv.notify_all();
  d.cv.wait(l, [&] { return d.openAll || a.token; });
  a.token = a.atGate = false;
}

// ---------------------------------------------------------------- what the user supplies

template<class ct_, int d>
struct GatedFE
{
  using ct = ct_;
  static constexpr int dim = d;
  PolyFE<ct, d> fe;
  struct LB
  {
    using Traits = typename PolyFE<ct, d>::LB::Traits;
    typename PolyFE<ct, d>::LB b;
    std::size_t size() const { return b.size(); }
    int order() const { return b.order(); }
    void evaluateFunction(const typename Traits::DomainType& x, std::vector<typename Traits::RangeType>& out) const { b.evaluateFunction(x, out); gate(); }
    void evaluateJacobian(const typename Traits::DomainType& x, std::vector<typename Traits::JacobianType>& out) const { b.evaluateJacobian(x, out); gate(); }
  };
  LB basis;
  struct Traits { using LocalBasisType = LB; using LocalInterpolationType = typename PolyFE<ct, d>::LI; };
  GatedFE() = default;
  GatedFE(const PolyFE<ct, d>& f) : fe(f), basis{f.basis} {}
  const LB& localBasis() const { return basis; }
  auto localInterpolation() const { return fe.localInterpolation(); }
  std::size_t size() const { return basis.size(); }
  GeometryType type() const { return fe.type(); }
};

template<class ct, int n, int c>
struct GatedMap
{
  PolyMap<ct, n, c> p;
  auto operator()(const Dune::FieldVector<ct, n>& x) const { auto y = p(x); gate(); return y; }
  struct Derivative
  {
    typename PolyMap<ct, n, c>::Derivative d;
    auto operator()(const Dune::FieldVector<ct, n>& x) const { auto y = d(x); gate(); return y; }
  };
  friend Derivative derivative(const GatedMap& m) { return {derivative(m.p)}; }
};

template<class ct, int c>
struct GatedCorners
{
  std::vector<Dune::FieldVector<ct, c>> v;
  GatedCorners() = default;
  GatedCorners(const std::vector<Dune::FieldVector<ct, c>>& w) : v(w) {}
  struct Iterator
  {
    const Dune::FieldVector<ct, c>* p;
    const Dune::FieldVector<ct, c>& operator*() const { gate(); return *p; }
    const Dune::FieldVector<ct, c>* operator->() const { gate(); return p; }
    Iterator& operator++() { ++p; return *this; }
    Iterator operator++(int) { auto r = *this; ++p; return r; }
    Iterator& operator+=(int k) { p += k; return *this; }
    Iterator operator+(int k) const { return {p + k}; }
    bool operator==(const Iterator& o) const { return p == o.p; }
    bool operator!=(const Iterator& o) const { return p != o.p; }
  };
  const Dune::FieldVector<ct, c>& operator[](std::size_t i) const { gate(); return v[i]; }
  Iterator begin() const { return {v.data()}; }
  Iterator end() const { return {v.data() + v.size()}; }
  std::size_t size() const { return v.size(); }
};
template<class ct>
struct GatedTraits : Dune::MultiLinearGeometryTraits<ct>
{
  template<int m, int c> struct CornerStorage { using Type = GatedCorners<ct, c>; };
};

// ---------------------------------------------------------------- families of objects

const int den = 4;
template<int m>
Points twoPoints(unsigned id, Rng& rng)
{
  Points r;
  for (auto& p : points<m>(id, den, 60, rng, false)) {
    bool corner = true;
    for (int v : p) if (v % den) corner = false;
    if (!corner && r.size() < 2 && (r.empty() || r[0] != p)) r.push_back(p);
  }
  while (r.size() < 2) r.push_back(Ints(m, 0));
  return r;
}

template<class G>
struct Thing { G g; std::string text; Points pts; };

template<class G>
std::string answer(const G& g, int q, const Ints& p)
{
  constexpr int m = G::mydimension, c = G::coorddimension;
  using ct = typename G::ctype;
  const auto x = point<m, ct>(p, den);
  switch (q) {
  case 0: return rec::nums(g.global(x), c);
  case 1: return rec::nums(g.local(g.global(x)), m);
  case 2: return "[" + rec::num(g.integrationElement(x)) + "]";
  case 3: return dense(g.jacobianTransposed(x), m, c);
  case 4: return dense(g.jacobianInverseTransposed(x), c, m);
  case 5: return "[" + rec::num(g.volume()) + "]";
  case 6: return rec::nums(g.center(), c);
  case 7: return "[" + rec::boolean(g.affine()) + "]";
  case 8: return dense(g.jacobian(x), c, m);
  case 9: return dense(g.jacobianInverse(x), m, c);
  }
  return "[]";
}

template<int m, int c, bool gated>
auto lfeThings(Rng& rng)
{
  using FE = std::conditional_t<gated, GatedFE<double, m>, PolyFE<double, m>>;
  using G = Dune::LocalFiniteElementGeometry<FE, c>;
  std::vector<PolyFE<double, m>> fes{simplexFE<double, m>(2), cubeFE<double, m>(1), simplexFE<double, m>(1)};
  if constexpr (m < 3) fes.push_back(cubeFE<double, m>(2));
  else fes.push_back(prismFE<double>());
  if constexpr (m == 3) fes[0] = cubeFE<double, m>(1);
  std::vector<Thing<G>> r;
  for (auto& fe : fes) {
    Ints org(c);
    for (auto& v : org) v = rng.in(-20, 20);
    const bool affine = fe.id == 0 && fe.ord == 1;
    const Points C = image<m, c>(fe.nodes2, frame<m, c>(rng, 10, 1), org, affine ? 0 : 1, rng);
    std::vector<Dune::FieldVector<double, c>> v;
    for (auto& x : C) v.push_back(point<c, double>(x, 1));
    Event e("lfe");
    e.str("kind", "lfe").i("id", fe.id).i("m", m).i("c", c).str("ct", "double").raw("coef", intsOf(C)).raw("basis", polyOf(fe.basis.f)).i("bden", 1).i("order", fe.ord);
    const Points p = twoPoints<m>(fe.id, rng);
    e.raw("pts", intsOf(p));
    r.push_back({G(GeometryType(fe.id, m), FE(fe), v), e.done(), p});
  }
  return r;
}

template<int m, int n, int c, bool gated>
auto mappedThings(Rng& rng)
{
  using Inner = Dune::MultiLinearGeometry<double, m, n>;
  using Map = std::conditional_t<gated, GatedMap<double, n, c>, PolyMap<double, n, c>>;
  using G = Dune::MappedGeometry<Map, Inner>;
  std::vector<Thing<G>> r;
  for (unsigned k = 0; k < 4; ++k) {
    const unsigned id = k % 2 ? 0 : (1u << m) - 1;
    const bool linear = k == 3;
    Ints org(n);
    for (auto& v : org) v = rng.in(-4, 4);
    const Points C = image<m, n>(refCorners<m>(id), frame<m, n>(rng, 6, 0), org, linear ? 0 : 1, rng);
    std::vector<Dune::FieldVector<double, n>> v;
    for (auto& x : C) v.push_back(point<n, double>(x, 8));
    const auto poly = randomMap<double, n, c>(rng, linear ? 1 : 2);
    Event e("mapped");
    e.str("kind", "mapped").i("id", id).i("m", m).i("n", n).i("c", c).str("ct", "double").raw("corners", intsOf(C)).i("cden", 8).raw("poly", polyOf(poly.p)).i("deg", linear ? 1 : 2).b("told", linear);
    const Points p = twoPoints<m>(id, rng);
    e.raw("pts", intsOf(p));
    r.push_back({G(Map{poly}, Inner(GeometryType(id, m), v), linear), e.done(), p});
  }
  return r;
}

template<template<class, int, int, class> class Geo, int m, int c>
auto cornerThings(Rng& rng)
{
  using G = Geo<double, m, c, GatedTraits<double>>;
  std::vector<Thing<G>> r;
  for (unsigned k = 0; k < 4; ++k) {
    const unsigned id = k == 3 ? 0 : m == 3 && k == 2 ? 5 : m == 3 && k == 0 ? 3 : (1u << m) - 1;
    Ints org(c);
    for (auto& v : org) v = rng.in(-9, 9);
    const Points C = image<m, c>(refCorners<m>(id), frame<m, c>(rng, 12, 1), org, k % 2 ? 0 : 1, rng);
    std::vector<Dune::FieldVector<double, c>> v;
    for (auto& x : C) v.push_back(point<c, double>(x, 1));
    Event e("ml");
    e.str("kind", "ml").i("id", id).i("m", m).i("c", c).str("ct", "double").raw("corners", intsOf(C)).i("cden", 1);
    const Points p = twoPoints<m>(id, rng);
    e.raw("pts", intsOf(p));
    r.push_back({G(GeometryType(id, m), GatedCorners<double, c>(v)), e.done(), p});
  }
  return r;
}

// ---------------------------------------------------------------- following a schedule

using Steps = std::vector<std::array<int, 4>>;

template<class G>
std::string replay(const std::vector<Thing<G>>& things, const Steps& steps, int no)
{
  const int n = 3;
  Director d;
  director = &d;
  d.actors.resize(n);
  std::vector<int> which(n), start;
  std::vector<std::unique_ptr<G>> own(n);
  for (int t = 0; t < n; ++t) {
    which[t] = (no + t * (1 + no / 4 % 3)) % int(things.size());
    start.push_back(which[t] + 1);
    own[t] = std::make_unique<G>(things[which[t]].g);
  }
  std::vector<std::thread> threads;
  for (int t = 0; t < n; ++t)
    threads.emplace_back([&, t] {
      int count = no + t;
      for (;;) {
        std::array<int, 3> w;
        {
          std::unique_lock<std::mutex> l(d.m);
          d.cv.wait(l, [&] { return d.quit || d.actors[t].wanted[0] >= 0; });
          if (d.actors[t].wanted[0] < 0) return;
          w = d.actors[t].wanted;
          d.actors[t].wanted[0] = -1;
          d.actors[t].busy = true;
        }
        std::string out;
        if (w[0] == 2) {
          // a copy made anew or assigned
          if (no % 2) own[t] = std::make_unique<G>(*own[w[1]]);
          else *own[t] = *own[w[1]];
          out = "[2," + std::to_string(t + 1) + "," + std::to_string(w[1] + 1) + ",0,[]]";
        }
        else {
          const int p = ++count % 2;
          me = t;
          left_ = w[2];
          std::string a;
          try { a = answer(*own[t], w[1], things[which[t]].pts[p]); }
          catch (const Dune::Exception&) { a = "[]"; }
          me = -1;
          out = "[1," + std::to_string(t + 1) + "," + std::to_string(w[1]) + "," + std::to_string(p + 1) + "," + a + "]";
        }
        std::unique_lock<std::mutex> l(d.m);
        if (w[0] == 2) which[t] = which[w[1]];
        d.acts.push_back(out);
        d.actors[t].busy = d.actors[t].token = false;
        d.cv.notify_all();
      }
    });
  auto settle = [&](int t, bool gateToo, int ms) {
    std::unique_lock<std::mutex> l(d.m);
    return d.cv.wait_for(l, std::chrono::milliseconds(ms), [&] {
      auto& a = d.actors[t];
      return a.wanted[0] < 0 && (!a.busy || (gateToo && a.atGate && !a.token)); });
  };
  bool hang = false;
  for (auto& s : steps) {
    const int t = s[1] - 1;
    if (s[0] == 1) {
      {
        std::unique_lock<std::mutex> l(d.m);
        if (d.actors[t].busy) d.actors[t].token = true;
        d.cv.notify_all();
      }
      if (!settle(t, false, 20000)) { hang = true; break; }
      continue;
    }
    // nobody else is needed for this step
    if (!settle(t, false, 20000) || (s[0] == 2 && !settle(s[2] - 1, false, 20000))) { hang = true; break; }
    {
      std::unique_lock<std::mutex> l(d.m);
      d.actors[t].wanted = {s[0], s[0] == 2 ? s[2] - 1 : s[2], s[3]};
      d.cv.notify_all();
    }
    if (!settle(t, true, 20000)) { hang = true; break; }
  }
  {
    std::unique_lock<std::mutex> l(d.m);
    d.openAll = d.quit = true;
    d.cv.notify_all();
  }
  for (auto& t : threads) t.join();
  return "{\"hang\":" + rec::boolean(hang) + ",\"start\":" + rec::ints(start) + ",\"acts\":" + rec::list(d.acts) + "}";
}

Steps parse(const std::string& line)
{
  std::vector<int> n;
  for (std::size_t i = 0; i < line.size(); )
    if (std::isdigit((unsigned char) line[i])) { std::size_t e; n.push_back(std::stoi(line.substr(i), &e)); i += e; }
    else ++i;
  Steps r;
  for (std::size_t i = 0; i + 3 < n.size(); i += 4) r.push_back({n[i], n[i + 1], n[i + 2], n[i + 3]});
  return r;
}

template<class G>
void family(Trace& tr, const std::vector<Thing<G>>& things, const std::vector<Steps>& all, int share, int part)
{
  std::vector<std::string> objs, runs;
  for (auto& t : things) objs.push_back(t.text);
  auto flush = [&] {
    if (runs.empty()) return;
    Event e("runs");
    e.i("den", den).raw("objs", rec::list(objs)).raw("runs", rec::list(runs));
    tr.put(e);
    runs.clear();
  };
  for (std::size_t i = part % share; i < all.size(); i += share) {
    runs.push_back(replay(things, all[i], int(i / share)));
    if (runs.size() == 40) flush();
  }
  flush();
}

// ---------------------------------------------------------------- all at once

template<class F>
void crowd(int n, F&& f)
{
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < n; ++t)
    ts.emplace_back([&, t] {
      ++ready;
      while (ready < n) {}
      f(t);
    });
  for (auto& t : ts) t.join();
}

// a refinement as one text
template<class R>
std::string walkStatic(int n)
{
  std::string s;
  const Dune::RefinementIntervals tag(n);
  for (auto it = R::vBegin(tag); it != R::vEnd(tag); ++it) s += std::to_string(it.index()) + rec::nums(it.coords());
  for (auto it = R::eBegin(tag); it != R::eEnd(tag); ++it) s += std::to_string(it.index()) + rec::ints(it.vertexIndices()) + rec::nums(it.coords());
  return s;
}
template<int dim>
std::string walkVirtual(GeometryType t, GeometryType coerce, int n)
{
  auto& R = Dune::buildRefinement<dim, double>(t, coerce);
  const Dune::RefinementIntervals tag(n);
  std::string s = std::to_string(R.nVertices(tag)) + "," + std::to_string(R.nElements(tag));
  for (auto it = R.vBegin(tag); it != R.vEnd(tag); ++it) s += std::to_string(it.index()) + rec::nums(it.coords());
  for (auto it = R.eBegin(tag); it != R.eEnd(tag); ++it) s += std::to_string(it.index()) + rec::ints(it.vertexIndices()) + rec::nums(it.coords());
  return s;
}
std::string walk(int k)
{
  using namespace Dune::GeometryTypes;
  switch (k) {
  case 0: return walkVirtual<2>(cube(2), simplex(2), 3);
  case 1: return walkVirtual<2>(simplex(2), simplex(2), 4);
  case 2: return walkVirtual<3>(cube(3), cube(3), 2);
  case 3: return walkVirtual<3>(pyramid, simplex(3), 2);
  case 4: return walkVirtual<3>(prism, simplex(3), 2);
  case 5: return walkVirtual<3>(cube(3), simplex(3), 2);
  case 6: return walkStatic<Dune::StaticRefinement<cube(2).id(), double, simplex(2).id(), 2>>(3);
  case 7: return walkStatic<Dune::StaticRefinement<simplex(3).id(), double, simplex(3).id(), 3>>(2);
  case 8: return walkVirtual<1>(line, line, 5);
  }
  return "";
}

template<class G>
struct Common { G g; Event e; Points pts; int den; };

int main(int argc, char** argv)
{
  rec::Options o = rec::options(argc, argv);
  const std::string what = argv[4];
  if (what == "schedules") {
    std::vector<Steps> all;
    for (int i = 5; i < argc; ++i) {
      std::ifstream in(o.out + "/" + argv[i]);
      if (!in) { std::perror(argv[i]); return 3; }
      for (std::string l; std::getline(in, l); ) all.push_back(parse(l));
    }
    Trace tr(o.out + "/runs.ndjson");
    Rng rng(o.seed * 7368787 + 5);
    const int s = o.seed;
    family(tr, lfeThings<2, 2, true>(rng), all, 1, s);
    family(tr, lfeThings<2, 3, true>(rng), all, 3, s);
    family(tr, lfeThings<1, 2, true>(rng), all, 3, s + 1);
    family(tr, lfeThings<3, 3, true>(rng), all, 5, s + 2);
    family(tr, mappedThings<2, 2, 2, true>(rng), all, 2, s);
    family(tr, mappedThings<2, 2, 3, true>(rng), all, 4, s + 1);
    family(tr, cornerThings<Dune::MultiLinearGeometry, 2, 2>(rng), all, 2, s + 1);
    family(tr, cornerThings<Dune::MultiLinearGeometry, 3, 3>(rng), all, 3, s + 2);
    family(tr, cornerThings<Dune::CachedMultiLinearGeometry, 2, 3>(rng), all, 3, s);
    family(tr, cornerThings<Dune::CachedMultiLinearGeometry, 3, 3>(rng), all, 5, s + 3);
    return 0;
  }

  // own objects and common ones, from new threads each time
  const int n = 8;
  const int rounds = o.thorough ? 12 : 3;
  std::vector<std::unique_ptr<Trace>> trs;
  for (int t = 0; t < n; ++t) trs.push_back(std::make_unique<Trace>(o.out + "/free" + std::to_string(t)));
  Trace walks(o.out + "/walks.ndjson");
  for (int r = 0; r < rounds; ++r) {
    Rng rng(o.seed * 86028121 + r);
    const auto mapped = mappedThings<2, 2, 2, false>(rng);
    const Points A = frame<2, 3>(rng, 10, 1), C = image<2, 3>(refCorners<2>(3), frame<2, 3>(rng, 12, 1), {1, 2, 3}, 1, rng);
    Dune::FieldMatrix<double, 2, 3> jt;
    for (int i = 0; i < 2; ++i) jt[i] = point<3, double>(A[i], 1);
    std::vector<Dune::FieldVector<double, 3>> v;
    for (auto& x : C) v.push_back(point<3, double>(x, 1));
    const Dune::AffineGeometry<double, 2, 3> aff(GeometryType(0, 2), {1, -2, 3}, jt);
    const Dune::MultiLinearGeometry<double, 2, 3> ml(GeometryType(3, 2), v);
    const Dune::AxisAlignedCubeGeometry<double, 3, 3> box({1, 2, 3}, {4, 9, 11});
    std::vector<std::vector<std::string>> seen(n);
    crowd(n, [&](int t) {
      Trace& tr = *trs[t];
      Rng rg(o.seed * 512927357 + r * n + t);
      for (int k = 0; k < 9; ++k) seen[t].push_back(walk((k + t) % 9));
      // its own
      auto fe = cubeFE<double, 2>(1 + t % 2);
      const Points D = image<2, 2>(fe.nodes2, frame<2, 2>(rg, 10, 1), {t, -t}, 1, rg);
      std::vector<Dune::FieldVector<double, 2>> u;
      for (auto& x : D) u.push_back(point<2, double>(x, 1));
      Event e("geo");
      e.str("kind", "lfe").str("how", "own").i("id", fe.id).raw("coef", intsOf(D)).raw("basis", polyOf(fe.basis.f)).i("bden", 1).i("order", fe.ord);
      put(tr, e, Dune::LocalFiniteElementGeometry<PolyFE<double, 2>, 2>(GeometryType(3, 2), fe, u), points<2>(3, 4, 6, rg, true), 4);
      const Points E = image<3, 3>(refCorners<3>(5), frame<3, 3>(rg, 12, 1), {t, 1, -t}, 1, rg);
      std::vector<Dune::FieldVector<double, 3>> w;
      for (auto& x : E) w.push_back(point<3, double>(x, 1));
      Event f("geo");
      f.str("kind", "ml").str("how", "own").i("id", 5).raw("corners", intsOf(E)).i("cden", 1);
      put(tr, f, Dune::CachedMultiLinearGeometry<double, 3, 3>(GeometryType(5, 3), w), points<3>(5, 4, 4, rg, true), 4);
      put(tr, f, Dune::MultiLinearGeometry<double, 3, 3>(GeometryType(5, 3), w), points<3>(5, 4, 4, rg, true), 4);
      // common ones
      Event g("geo");
      g.str("kind", "ml").str("how", "common").i("id", 3).raw("corners", intsOf(C)).i("cden", 1);
      put(tr, g, ml, points<2>(3, 4, 5, rg, true), 4);
      Event h("geo");
      h.str("kind", "aff").str("how", "common").i("id", 0).raw("origin", "[1,-2,3]").raw("rows", intsOf(A)).i("cden", 1);
      put(tr, h, aff, points<2>(0, 4, 5, rg, true), 4);
      Event b("geo");
      b.str("kind", "box").str("how", "common").raw("lower", "[1,2,3]").raw("upper", "[4,9,11]").raw("axes", "[0,1,2]").i("cden", 1);
      put(tr, b, box, points<3>(7, 4, 5, rg, true), 4);
      for (auto& th : mapped) {
        // the text of the object already names its dimensions and number type
        std::vector<std::string> as;
        for (int q = 0; q < 10; ++q) as.push_back("[1,1," + std::to_string(q) + ",1," + answer(th.g, q, th.pts[0]) + "]");
        Event m("runs");
        m.i("den", den).raw("objs", "[" + th.text + "]").raw("runs", "[{\"hang\":false,\"start\":[1],\"acts\":" + rec::list(as) + "}]");
        seen[t].push_back(m.done());
      }
    });
    std::map<std::string, int> book;
    auto no = [&](const std::string& s) { return book.emplace(s, int(book.size()) + 1).first->second; };
    std::vector<std::string> rows;
    std::vector<int> alone;
    for (int k = 0; k < 9; ++k) alone.push_back(no(walk(k)));
    for (int t = 0; t < n; ++t) {
      std::vector<int> row(9);
      for (int k = 0; k < 9; ++k) row[(k + t) % 9] = no(seen[t][k]);
      rows.push_back(rec::ints(row));
    }
    Event e("walks");
    e.ints("alone", alone).raw("seen", rec::list(rows));
    walks.put(e);
    std::ofstream common(o.out + "/common.ndjson", r ? std::ios::app : std::ios::trunc);
    for (int t = 0; t < n; ++t)
      for (std::size_t k = 9; k < seen[t].size(); ++k) common << seen[t][k] << "\n";
  }
  trs.clear();
  std::ofstream all(o.out + "/free.ndjson");
  for (int t = 0; t < n; ++t) {
    const std::string part = o.out + "/free" + std::to_string(t);
    { std::ifstream in(part); all << in.rdbuf(); }
    std::remove(part.c_str());
  }
  return 0;
}

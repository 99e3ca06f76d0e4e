// Quadrature rules: what they integrate (C13), how requests are answered (C14), one-dimensional rules (C15).
#include <config.h>
#include <algorithm>
#include <numeric>
#include <dune/common/exceptions.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/type.hh>
#include "rec.hh"
#include "moments.hh"
using namespace rec;
using Dune::GeometryType;
namespace QT = Dune::QuadratureType;

template<class ct, int d>
void moments(Trace& tr, GeometryType gt, int p, QT::Enum qt, int many, Rng& rng)
{
  const auto& rule = Dune::QuadratureRules<ct, d>::rule(gt, p, qt);
  Event e("moments");
  e.str("ct", ctName<ct>()).i("m", d).i("id", gt.id()).i("qt", qt).i("p", p).i("order", rule.order()).i("size", rule.size());
  std::vector<std::string> ws;
  const int degree = d == 0 ? 0 : std::max(0, std::min(rule.order(), 200));
  for (auto& dirs : walks<d>(degree, many, rng))
    ws.push_back("[" + rec::ints(dirs) + "," + walk(rule, dirs) + "]");
  e.raw("walks", list(ws));
  tr.put(e);
}

const std::vector<QT::Enum> lineTypes{QT::GaussLegendre, QT::GaussJacobi_1_0, QT::GaussJacobi_2_0, QT::GaussJacobi_n_0,
                                      QT::GaussLobatto, QT::GaussRadauLeft, QT::GaussRadauRight};
const std::vector<QT::Enum> bodyTypes{QT::GaussLegendre, QT::GaussJacobi_n_0, QT::GaussLobatto, QT::GaussRadauLeft, QT::GaussRadauRight};

// rules of the highest orders have very many points in higher dimension: leave out what is larger than this
// (also where the request is to be refused, in case it is not)
inline bool affordable(int d, int p, double points) { return d < 2 || std::pow((p + d + 1) / 2, d) <= points; }

template<class ct, int d>
void exactness(Trace& tr, const Options& o, int dense, int stride, int many)
{
  Rng rng(o.seed * 982451653 + d * 10 + sizeof(ct));
  for (auto qt : d == 1 ? lineTypes : bodyTypes)
    for (unsigned id = 0; id < (1u << d); ++id) {
      const GeometryType gt(id, d);
      const int top = d == 0 ? 3 : int(Dune::QuadratureRules<ct, d>::maxOrder(gt, qt));
      for (int p = 0; p <= top; ) {
        // both ids of a shape name the same rules: the second one only up to low orders
        if ((id & 1) && p > 4 && d > 1 && !o.thorough) break;
        if (!affordable(d, p, o.thorough ? 60000 : 30000)) break;
        moments<ct, d>(tr, gt, p, qt, many, rng);
        if (p < dense) ++p;
        else if (p == top) break;
        else p = std::min(top, p + rng.in(1, stride));
      }
    }
}

// up to n points: the extreme ones in every direction, and others
template<class Rule>
std::string somePoints(const Rule& rule, std::size_t n, Rng& rng)
{
  constexpr int d = Rule::d;
  std::vector<std::size_t> pick;
  if (rule.size() <= n) { pick.resize(rule.size()); std::iota(pick.begin(), pick.end(), 0); }
  else {
    if constexpr (d > 0) {
      for (int k = 0; k <= d; ++k) {
        auto key = [&](std::size_t i) { long double s = 0; for (int a = 0; a < d; ++a) if (k == d || a == k) s += rule[i].position()[a]; return s; };
        std::size_t lo = 0, hi = 0;
        for (std::size_t i = 1; i < rule.size(); ++i) { if (key(i) < key(lo)) lo = i; if (key(i) > key(hi)) hi = i; }
        pick.push_back(lo); pick.push_back(hi);
      }
    }
    while (pick.size() < n) pick.push_back(rng.next() % rule.size());
  }
  std::vector<std::string> ps;
  for (auto i : pick) ps.push_back(nums(rule[i].position(), d));
  return list(ps);
}

template<class ct, int d>
void request(Trace& tr, GeometryType gt, int p, QT::Enum qt, Rng& rng)
{
  using R = Dune::QuadratureRules<ct, d>;
  Event e("request");
  e.str("ct", ctName<ct>()).i("m", d).i("id", gt.id()).b("none", gt.isNone()).i("qt", qt).i("p", p).str("by", "type");
  e.i("max", d == 0 ? 1000000 : std::min<long long>(R::maxOrder(gt, qt), 1000000));
  try {
    const auto& rule = R::rule(gt, p, qt);
    e.str("out", "rule").i("tdim", rule.type().dim()).i("tid", rule.type().id()).b("tnone", rule.type().isNone());
    e.i("order", rule.order()).i("size", rule.size()).raw("pts", somePoints(rule, d <= 1 ? 80 : 24, rng));
  }
  catch (const Dune::Exception&) { e.str("out", "refused"); }
  tr.put(e);
}

template<class ct, int d>
void requestByShape(Trace& tr, GeometryType::BasicType bt, int p, QT::Enum qt)
{
  using R = Dune::QuadratureRules<ct, d>;
  Event e("request");
  const char* names[] = {"simplex", "cube", "pyramid", "prism", "extended", "none"};
  const GeometryType::BasicType basics[] = {GeometryType::simplex, GeometryType::cube, GeometryType::pyramid, GeometryType::prism, GeometryType::extended, GeometryType::none};
  std::string name = "?";
  for (int k = 0; k < 6; ++k) if (basics[k] == bt) name = names[k];
  e.str("ct", ctName<ct>()).i("m", d).str("shape", name).i("qt", qt).i("p", p).str("by", "shape");
  try {
    const auto& rule = R::rule(bt, p, qt);
    e.str("out", "rule").i("tdim", rule.type().dim()).i("tid", rule.type().id()).b("tnone", rule.type().isNone()).i("order", rule.order()).i("size", rule.size());
    // the rule of that very type
    const auto& again = R::rule(rule.type(), p, qt);
    e.b("same", &rule == &again);
  }
  catch (const Dune::Exception&) { e.str("out", "refused"); }
  tr.put(e);
}

template<class ct, int d>
void requests(Trace& tr, const Options& o, int dense, int stride)
{
  Rng rng(o.seed * 334214459 + d * 10 + sizeof(ct));
  for (auto qt : d == 1 ? lineTypes : bodyTypes) {
    for (unsigned id = 0; id < (1u << d); ++id) {
      const GeometryType gt(id, d);
      const int top = d == 0 ? 3 : int(Dune::QuadratureRules<ct, d>::maxOrder(gt, qt));
      std::vector<int> ps{-1, -7, top};
      // any order can be had in a point
      if (d == 0) for (int k : {5, 61, 1000, 100000}) ps.push_back(k);
      if (d > 0) for (int k : {1, 2, 3, 4, 5, 9, 60, 1000}) ps.push_back(top + k);
      for (int p = 0; p <= top; p += p < dense ? 1 : rng.in(1, stride)) {
        if ((id & 1) && d > 1 && p > 4 && !o.thorough) break;
        ps.push_back(p);
      }
      // in any order, so that refused requests come before and after granted ones
      for (int i = int(ps.size()) - 1; i > 0; --i) std::swap(ps[i], ps[rng.in(0, i)]);
      for (int p : ps)
        if (affordable(d, p, d == 0 || p > top ? 1e6 : o.thorough ? 3e5 : 3e4)) request<ct, d>(tr, gt, p, qt, rng);
    }
    for (auto bt : {GeometryType::simplex, GeometryType::cube, GeometryType::pyramid, GeometryType::prism, GeometryType::none})
      for (int p : {0, 1, 2, 3, 4, 7, 12, 29, -1, 75, 500})
        if (affordable(d, p, p > 29 ? 1e6 : 3e4)) requestByShape<ct, d>(tr, bt, p, qt);
  }
}

template<class ct>
std::string content(const Dune::QuadratureRule<ct, 1>& rule)
{
  std::vector<std::string> r;
  for (const auto& q : rule) r.push_back("[" + num(q.position()[0]) + "," + num(q.weight()) + "]");
  return list(r);
}

template<class ct>
void lines(Trace& tr)
{
  using R = Dune::QuadratureRules<ct, 1>;
  for (unsigned id = 0; id < 2; ++id)
    for (auto qt : lineTypes) {
      const GeometryType gt(id, 1);
      for (int p = 0; p <= int(R::maxOrder(gt, qt)); ++p) {
        const auto& rule = R::rule(gt, p, qt);
        Event e("line");
        e.str("ct", ctName<ct>()).i("id", id).i("qt", qt).i("p", p).i("order", rule.order()).raw("pts", content(rule));
        // the mirror image, for rules that come in pairs
        const auto other = qt == QT::GaussRadauLeft ? QT::GaussRadauRight : qt == QT::GaussRadauRight ? QT::GaussRadauLeft : qt;
        e.raw("mirror", content(R::rule(gt, p, other)));
        tr.put(e);
      }
    }
}

int main(int argc, char** argv)
{
  Options o = options(argc, argv);
  const std::string what = argv[4];
  Trace tr(o.out + "/trace.ndjson");
  const int k = o.thorough ? 3 : 1;
  if (what == "C13") {
    exactness<double, 0>(tr, o, 4, 1, 1);
    exactness<double, 1>(tr, o, 200, 1, 1);
    exactness<double, 2>(tr, o, 20 * k, 6, 6 + 2 * k);
    exactness<double, 3>(tr, o, 12 + 4 * k, 14, 8 + k);
    exactness<double, 4>(tr, o, 2 + k, 24, 6 + k);
    exactness<double, 5>(tr, o, 1, o.thorough ? 3 : 9, 3);
    exactness<float, 1>(tr, o, 200, 1, 1);
    exactness<float, 2>(tr, o, 5, 9, 4);
    exactness<float, 3>(tr, o, 3, 12, 4);
    exactness<long double, 1>(tr, o, 200, 1, 1);
    exactness<long double, 2>(tr, o, 5, 9, 4);
  }
  else if (what == "C14") {
    requests<double, 0>(tr, o, 4, 1);
    requests<double, 1>(tr, o, 200, 1);
    requests<double, 2>(tr, o, 30 * k, 6);
    requests<double, 3>(tr, o, 16 * k, 14);
    requests<double, 4>(tr, o, 2 + k, 24);
    requests<double, 5>(tr, o, 1, 50);
    requests<float, 1>(tr, o, 200, 1);
    requests<float, 2>(tr, o, 8, 9);
    requests<long double, 1>(tr, o, 200, 1);
    requests<long double, 3>(tr, o, 4, 9);
  }
  else if (what == "C15") {
    lines<double>(tr);
    lines<float>(tr);
    lines<long double>(tr);
  }
  else
    return 3;
  return 0;
}
